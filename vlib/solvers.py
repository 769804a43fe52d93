"""Registry of the convolutional sparse coding solvers.

For every class: how to build it on a generated problem, its documented
functionals evaluated independently (direct circular convolution, direct
circular differences), and an equivalent dense problem for the reference
solver.  Nothing here is taken from the code under test except the classes
themselves and the documented option names."""
import numpy as np
from vlib.core import st, seeds, rng, stdopt
from vlib import ref
from vlib.csc import layout, Prob, LAYOUTS
from sporco.admm import cbpdn, cbpdntv, pdcsc, parcbpdn
from sporco.pgm import cbpdn as pcbpdn
from sporco.pgm.momentum import MomentumNesterov, MomentumLinear, MomentumGenLinear
from sporco.pgm.backtrack import BacktrackStandard, BacktrackRobust

ADMM_EQ = ['ConvBPDN', 'ConvBPDNJoint', 'ConvElasticNet', 'ConvBPDNGradReg', 'ConvBPDNProjL1']
ADMM_2B = ['ConvMinL1InL2Ball', 'ConvBPDNMaskDcpl', 'ConvL1L1Grd']
ADMM_TV = ['ConvBPDNScalarTV', 'ConvBPDNVectorTV', 'ConvBPDNRecTV']
PDCSC = ['ConvProdDictBPDN', 'ConvProdDictBPDNJoint', 'ConvProdDictL1L1Grd', 'ConvProdDictL1L1GrdJoint']
WRAP = ['AddMaskSim', 'MultiDict']
PGM = ['pgm.ConvBPDN', 'pgm.ConvBPDNMask']
PAR = ['ParConvBPDN']
MASKED = ['ConvBPDNMaskDcpl', 'ConvL1L1Grd', 'AddMaskSim', 'pgm.ConvBPDNMask', 'ParConvBPDN', 'ConvProdDictL1L1Grd']
ALL = ADMM_EQ + ADMM_2B + ADMM_TV + PDCSC + WRAP + PGM

CLS = {}
for _k in ADMM_EQ + ADMM_2B:
    CLS[_k] = getattr(cbpdn, _k)
for _k in ADMM_TV:
    CLS[_k] = getattr(cbpdntv, _k)
for _k in PDCSC:
    CLS[_k] = getattr(pdcsc, _k)
CLS['AddMaskSim'] = cbpdn.AddMaskSim
CLS['MultiDict'] = cbpdn.MultiDictConvBPDN
CLS['pgm.ConvBPDN'] = pcbpdn.ConvBPDN
CLS['pgm.ConvBPDNMask'] = pcbpdn.ConvBPDNMask
CLS['ParConvBPDN'] = parcbpdn.ParConvBPDN

L1FID = ('ConvL1L1Grd', 'ConvProdDictL1L1Grd', 'ConvProdDictL1L1GrdJoint')
HAS_NONNEG = [k for k in ALL]
GRADW = ('ConvBPDNGradReg', 'ConvL1L1Grd', 'ConvProdDictL1L1Grd', 'ConvProdDictL1L1GrdJoint')


@st.composite
def case(draw, kinds, maxN=(8, 5, 3), maxf=(3, 3, 2), dimNs=(1, 1, 2, 2, 2, 3), maxM=3, maxC=3, maxK=2, minN=1,
         names=None):
    kind = draw(st.sampled_from(list(kinds)))
    if names is None:
        nm = tuple(LAYOUTS)
        if kind in PDCSC:
            nm = ('C1', 'CK1', 'C1', 'C1d', 'CK1d')
        elif kind == 'MultiDict':
            nm = ('Cm', 'CKm')
        elif kind == 'ParConvBPDN':
            nm = ('plain', 'C1', 'Cm', 'K', 'CK1', 'CKm')
    else:
        nm = names
    lay = draw(layout(names=nm, maxN=maxN, maxf=maxf, dimNs=dimNs, maxM=maxM, maxC=maxC, maxK=maxK, minN=minN))
    return dict(kind=kind, lay=lay, seed=draw(seeds()),
                skind=draw(st.sampled_from(['normal', 'synth', 'smallint'])),
                dkind=draw(st.sampled_from(['normal', 'unit', 'smallint'])),
                lam=draw(st.sampled_from([0.02, 0.1, 0.3, 0.6])),
                mu=draw(st.sampled_from([0.0, 0.05, 0.3])),
                eps=draw(st.sampled_from([0.1, 0.4])),
                nn=draw(st.sampled_from([False, False, True])),
                nb=draw(st.sampled_from([False, False, False, True])),
                wl1=draw(st.sampled_from(['one', 'scalar', 'filt', 'full', 'fullzero'])),
                wgt=draw(st.sampled_from(['one', 'scalar', 'filt'])),
                mask=draw(st.sampled_from(['none', 'bin', 'bin', 'wgt', 'spatial'])),
                Cb=draw(st.integers(1, 3)),
                inner=draw(st.sampled_from(['ConvBPDN', 'ConvElasticNet', 'ConvBPDNGradReg', 'ConvBPDNJoint'])))


def cdiff(X, ax):
    return X - np.roll(X, 1, axis=ax)


def diffmat(Nv, ax):
    n = int(np.prod(Nv))
    idx = np.arange(n).reshape(Nv)
    G = np.eye(n)
    G[np.arange(n), np.roll(idx, 1, axis=ax).ravel()] -= 1.0
    return G


class Model(object):

    def __init__(self, c, dtype='float64'):
        self.c = c = dict(c)
        self.kind = kind = c['kind']
        self.inner = c['inner'] if kind in ('AddMaskSim', 'MultiDict') else None
        if kind == 'AddMaskSim' and self.inner == 'ConvElasticNet':
            # known finding: the l2 term also acts on the mask impulse maps
            c['mu'] = 0.0
        self.eff = self.inner or kind             # class whose regulariser applies
        self.p = p = Prob(c['lay'], c['seed'], dtype, c['skind'], c['dkind'])
        self.n = p.dimN
        self.dtype = np.dtype(dtype)
        rs = rng(c['seed'], 21)
        self.B = None
        self.shpX = p.shpX
        if kind in PDCSC:
            # S internal has C channels; X has Cb channels
            Cb = c['Cb']
            self.B = rs.randn(p.C, Cb).astype(dtype)
            self.shpX = p.Nv + (Cb, p.K, p.M)
        self.parts = None
        if kind == 'MultiDict':
            self._members(rng(c['seed'], 22))
        self.n1 = int(np.prod(p.Nv))
        self.spax = tuple(range(self.n))
        # non-negativity and boundary restrictions
        self.nn, self.nb = c['nn'], c['nb']
        self.zmask = np.zeros(self.shpX, dtype=bool)
        if self.nb:
            for k in range(self.n):
                f = p.lay['fs'][k]
                if f > 1:
                    self.zmask[(slice(None),) * k + (slice(1 - f, None),)] = True
        # weights
        w = {'one': np.ones(()), 'scalar': np.asarray(0.5 + rs.rand()),
             'filt': 0.2 + 2 * rs.rand(*((1,) * (self.n + 2) + (p.M,))),
             'full': 0.2 + 2 * rs.rand(*self.shpX),
             'fullzero': rs.rand(*self.shpX) * (rs.rand(*self.shpX) < 0.7)}[c['wl1']]
        if self.eff in ('ConvBPDNProjL1', 'ConvProdDictL1L1GrdJoint'):
            w = np.ones(())
        self.w = w.astype(dtype)
        self.wf = np.broadcast_to(np.asarray(self.w, dtype=float), self.shpX)
        g = {'one': None, 'scalar': np.asarray(0.3 + rs.rand()), 'filt': 0.3 + rs.rand(p.M)}[c['wgt']]
        if self.inner == 'ConvBPDNGradReg' and kind == 'AddMaskSim' and c['wgt'] != 'filt':
            g = np.full(p.M, 1.0 if g is None else float(g))
        self.g = None if g is None else g.astype(dtype)
        self.gf = np.broadcast_to(np.asarray(1.0 if g is None else self.g, dtype=float), (p.M,))
        l21 = None
        if self.eff in ('ConvBPDNJoint', 'ConvProdDictL1L1GrdJoint') and c['wgt'] == 'filt' and kind != 'AddMaskSim':
            l21 = 0.3 + rs.rand(*(p.Nv + (1, p.K, p.M)))
            if rs.rand() < 0.5:
                l21 = l21.reshape(p.Nv + (p.K, p.M))
        self.l21 = None if l21 is None else l21.astype(dtype)
        self.l21f = np.ones(p.Nv + (1, p.K, p.M)) if l21 is None else np.asarray(
            self.l21, dtype=float).reshape(p.Nv + (1, p.K, p.M))
        # mask (internal) and external form
        self.W = None
        self.Wi = np.ones(p.shpS)
        if kind in MASKED and c['mask'] != 'none':
            if c['mask'] == 'spatial':
                Wi = (rs.rand(*(p.Nv + (1, 1, 1))) < 0.6) * 1.0
                self.W = Wi.reshape(p.Nv).astype(dtype)
            else:
                Wi = (rs.rand(*p.shpS) < 0.6) * 1.0
                if c['mask'] == 'wgt' and kind != 'AddMaskSim':
                    Wi = Wi * (0.3 + rs.rand(*p.shpS))
                self.W = Wi.astype(dtype)
            self.Wi = np.broadcast_to(self.W.reshape(Wi.shape), p.shpS).astype(float)
        elif kind == 'AddMaskSim':
            self.W = np.ones(p.Nv, dtype=dtype)
        # parameters
        if kind in PDCSC:
            lm = np.abs(self.bigmat().T @ self.packS()).max()
        else:
            lm = p.lmax()
        if kind in L1FID:
            lm = np.abs(self.bigmat()).sum(axis=0).max()
        lm = max(lm, 1e-3)
        self.lmbda = float(c['lam'] * lm)
        self.mu = float(c['mu'] * lm)
        if kind in L1FID:
            self.mu = float(c['mu'])
        A = self.bigmat()
        s = self.packS()
        if self.eff == 'ConvBPDNProjL1':
            l1 = np.abs(np.linalg.lstsq(A, s, rcond=None)[0]).sum(axis=0).max()
            self.gamma = float(c['eps'] * 3 * max(l1, 1e-2))
        if self.eff == 'ConvMinL1InL2Ball':
            self.epsilon = self._epsilon(A, s)
        self.lipA = max(np.linalg.norm(A, 2)**2, 1e-6)
        self._ref = None

    # -- dense forms ----------------------------------------------------------
    def bigmat(self):
        A = self.p.matrix()
        return np.kron(np.asarray(self.B, dtype=float), A) if self.B is not None else A

    def packS(self, S=None):
        p = self.p
        if self.B is None:
            return p.packS(S)
        S = p.S64 if S is None else np.asarray(S, dtype=float)
        return S.reshape(self.n1, p.C, p.K).transpose(1, 0, 2).reshape(p.C * self.n1, p.K)

    def pack(self, X):
        p = self.p
        if self.B is None:
            return p.pack(X)
        Cb = self.shpX[self.n]
        v = np.asarray(X, dtype=float).reshape(self.n1, Cb, p.K, p.M)
        return v.transpose(1, 3, 0, 2).reshape(Cb * p.M * self.n1, p.K)

    def unpack(self, V):
        p = self.p
        if self.B is None:
            return p.unpack(V)
        Cb = self.shpX[self.n]
        return V.reshape(Cb, p.M, self.n1, p.K).transpose(2, 0, 3, 1).reshape(self.shpX)

    def rowshape(self):
        """Shape of the unknown matrix split by role."""
        p = self.p
        if self.B is None:
            return (p.M, self.n1, p.Cx, p.K)
        return (self.shpX[self.n], p.M, self.n1, p.K)

    def _epsilon(self, A, s):
        """A radius for which the constraint can be met, per channel and signal."""
        p = self.p
        nrm = lambda R: np.sqrt(np.sum(R.reshape(p.Cd, self.n1, -1)**2, axis=1)).max()
        if self.nn or self.nb:
            import scipy.optimize as so
            zm = self.pack(self.zmask.astype(float)) > 0
            r = np.zeros_like(s)
            for k in range(s.shape[1]):
                keep = ~zm[:, k]
                if keep.any():
                    if self.nn:
                        x = so.nnls(A[:, keep], s[:, k], maxiter=2000)[0]
                    else:
                        x = np.linalg.lstsq(A[:, keep], s[:, k], rcond=None)[0]
                    r[:, k] = s[:, k] - A[:, keep] @ x
                else:
                    r[:, k] = s[:, k]
        else:
            r = s - A @ np.linalg.lstsq(A, s, rcond=None)[0]
        return float(nrm(r) * 1.05 + self.c['eps'] * max(nrm(s), 1e-3))

    # -- functionals at internal X ---------------------------------------------
    def synth(self, X):
        X = np.asarray(X, dtype=float)
        if self.B is None:
            return self.p.synth(X)
        n = self.n
        Y = ref.synth(self.p.D64, X, n)                     # Nv Cb K 1
        return np.moveaxis(np.tensordot(np.asarray(self.B, dtype=float), Y, axes=(1, n)), 0, n)

    def dfid_res(self, R):
        """Data fidelity at residual R (Nv, C, K, 1)."""
        R = np.asarray(R, dtype=float)
        if self.kind in L1FID:
            return float(np.sum(np.abs(self.Wi * R)))
        return float(0.5 * np.sum((self.Wi * R)**2))

    def dfid(self, X):
        return self.dfid_res(self.synth(X) - self.p.S64)

    def l1(self, X):
        return float(np.sum(self.wf * np.abs(X)))

    def l21v(self, X):
        g = np.sqrt(np.sum(np.asarray(X, dtype=float)**2, axis=self.n, keepdims=True))
        return float(np.sum(self.l21f * g)) if self.eff != 'ConvProdDictBPDNJoint' else float(np.sum(g))

    def grad(self, X):
        X = np.asarray(X, dtype=float)
        return float(0.5 * sum(np.sum(self.gf * cdiff(X, a)**2) for a in self.spax))

    def tvd(self, X):
        """Stacked differences the TV term is made of, direction last."""
        X = np.asarray(X, dtype=float)
        if self.eff == 'ConvBPDNRecTV':
            # the weights scale the contribution of each filter to the reconstruction
            R = ref.synth(self.p.D64 * self.gf, X, self.n)
            return np.stack([cdiff(R, a) for a in self.spax], axis=-1)
        return np.stack([self.gf[..., None] * np.stack([cdiff(X, a) for a in self.spax], axis=-1)], axis=0)[0]

    def tv_of(self, Dv):
        n = self.n
        ax = {'ConvBPDNScalarTV': (-1,), 'ConvBPDNVectorTV': (n + 2, -1), 'ConvBPDNRecTV': (n, -1)}[self.eff]
        return float(np.sum(np.sqrt(np.sum(np.asarray(Dv, dtype=float)**2, axis=ax))))

    def terms(self, X):
        """Named regularisation values and the regularisation part of the objective."""
        e = self.eff
        lm, mu = self.lmbda, self.mu
        if e in ('ConvBPDN', 'ConvBPDNMaskDcpl', 'ConvProdDictBPDN', 'pgm.ConvBPDN', 'pgm.ConvBPDNMask', 'ParConvBPDN'):
            r = {'RegL1': self.l1(X)}
            return r, lm * r['RegL1']
        if e in ('ConvBPDNJoint', 'ConvProdDictBPDNJoint'):
            r = {'RegL1': self.l1(X), 'RegL21': self.l21v(X)}
            return r, lm * r['RegL1'] + mu * r['RegL21']
        if e == 'ConvElasticNet':
            r = {'RegL1': self.l1(X), 'RegL2': float(0.5 * np.sum(np.asarray(X, dtype=float)**2))}
            return r, lm * r['RegL1'] + mu * r['RegL2']
        if e in ('ConvBPDNGradReg', 'ConvL1L1Grd', 'ConvProdDictL1L1Grd'):
            r = {'RegL1': self.l1(X), 'RegGrad': self.grad(X)}
            return r, lm * r['RegL1'] + mu * r['RegGrad']
        if e == 'ConvProdDictL1L1GrdJoint':
            r = {'RegL21': self.l21v(X), 'RegGrad': self.grad(X)}
            return r, lm * r['RegL21'] + mu * r['RegGrad']
        if e in ADMM_TV:
            r = {'RegL1': self.l1(X), 'RegTV': self.tv_of(self.tvd(X))}
            return r, lm * r['RegL1'] + mu * r['RegTV']
        if e == 'ConvBPDNProjL1':
            return {}, 0.0
        if e == 'ConvMinL1InL2Ball':
            r = {'RegL1': self.l1(X)}
            return r, r['RegL1']
        raise KeyError(e)

    def objective(self, X):
        if self.eff == 'ConvMinL1InL2Ball':
            return self.l1(X)
        return self.dfid(X) + self.terms(X)[1]

    def infeasible(self, X):
        """'' when X satisfies the constraints (and restrictions), else what fails."""
        X = np.asarray(X, dtype=float)
        e = self.eff
        f32 = self.dtype == np.float32
        if self.nn and X.min() < 0:
            return 'negative coefficient (%g) with NonNegCoef' % X.min()
        if self.nb and np.abs(X[self.zmask]).sum() > 0:
            return 'non-zero coefficient in the boundary region with NoBndryCross'
        if e == 'ConvBPDNProjL1':
            n = np.abs(X).sum(axis=self.spax + (self.n, self.n + 2)).max()
            if n > self.gamma * (1 + (1e-4 if f32 else 1e-8)) + 1e-8:
                return 'l1 norm %g, ball radius %g' % (n, self.gamma)
        return ''

    def ball_excess(self, X):
        R = self.synth(X) - self.p.S64
        return float(np.sqrt(np.sum(R**2, axis=self.spax)).max()) / max(self.epsilon, 1e-12) - 1.0

    def fzero(self):
        if self.eff == 'ConvMinL1InL2Ball':
            return max(float(np.sum(self.wf * np.abs(self.unpack(
                np.linalg.lstsq(self.bigmat(), self.packS(), rcond=None)[0])))), 1e-3)
        return self.dfid_res(self.p.S64)

    def reference(self):
        if self._ref is not None:
            return self._ref
        p, e, n1 = self.p, self.eff, self.n1
        A, s = self.bigmat(), self.packS()
        nrow, ncol = A.shape[1], s.shape[1]
        wv = self.pack(self.wf)
        zm = self.pack(self.zmask.astype(float)) > 0
        rsh = self.rowshape()
        L1c = ref.L1NN if self.nn else ref.L1
        quad, terms = [], []
        lm, mu = self.lmbda, self.mu
        wrap = (lambda phi: ref.WithZero(phi, zm)) if self.nb else (lambda phi: phi)
        if e == 'ConvMinL1InL2Ball':
            terms.append((None, 0.0, wrap(L1c(wv))))
            terms.append((A, s, ref.BallL2(self.epsilon, shape=(p.Cd, n1, ncol), axes=1, tol=1e-5)))
        else:
            Wv = self.packS(self.Wi)
            if self.kind in L1FID:
                terms.append((A, s, ref.L1(Wv)))
            elif np.all(self.Wi == 1):
                quad.append((A, s, 1.0))
            else:
                terms.append((A, s, ref.SqL2(Wv**2)))
            if e == 'ConvBPDNProjL1':
                terms.append((None, 0.0, ref.BallL1(self.gamma, rsh, (0, 1, 2), nn=self.nn,
                                                    zero=zm if self.nb else None)))
            elif e in ('ConvBPDNJoint', 'ConvProdDictBPDNJoint', 'ConvProdDictL1L1GrdJoint'):
                cax = 2 if self.B is None else 0
                wl = np.ones_like(self.l21f) if e == 'ConvProdDictBPDNJoint' else self.l21f
                w21 = wl.reshape(n1, 1, p.K, p.M)
                w21 = w21.transpose(3, 0, 1, 2) if self.B is None else w21.transpose(1, 3, 0, 2)
                a, b = (lm, mu) if e != 'ConvProdDictL1L1GrdJoint' else (0.0, lm)
                terms.append((None, 0.0, wrap(ref.L1L21(a * wv, b * w21, rsh, (cax,), nn=self.nn))))
            else:
                terms.append((None, 0.0, wrap(L1c(lm * wv))))
            if e == 'ConvElasticNet' and mu > 0:
                quad.append((np.eye(nrow), np.zeros((nrow, ncol)), mu))
            if e in GRADW and mu > 0:
                rep = p.M if self.B is None else p.M * self.shpX[self.n]
                gd = np.sqrt(self.gf) if self.B is None else np.tile(np.sqrt(self.gf), self.shpX[self.n])
                for a in self.spax:
                    G = np.kron(np.diag(gd), diffmat(p.Nv, a))
                    quad.append((G, np.zeros((rep * n1, ncol)), mu))
            if e in ADMM_TV and mu > 0:
                nd = self.n
                if e == 'ConvBPDNRecTV':
                    Aw = A * np.repeat(self.gf, n1)[None, :]
                    Kt = np.concatenate([np.kron(np.eye(p.Cd), diffmat(p.Nv, a)) @ Aw for a in self.spax], axis=0)
                    shp, ax = (nd, p.Cd, n1, p.Cx, p.K), (0, 1, 3)
                else:
                    Kt = np.concatenate([np.kron(np.diag(self.gf), diffmat(p.Nv, a)) for a in self.spax], axis=0)
                    shp, ax = (nd, p.M, n1, p.Cx, p.K), ((0,) if e == 'ConvBPDNScalarTV' else (0, 1))
                terms.append((Kt, 0.0, ref.L1L21(0.0, mu, shp, ax)))
        F, V = ref.solve(nrow, ncol, terms, quad)
        self._ref = (F, self.unpack(V))
        return self._ref

    # -- construction -----------------------------------------------------------
    def base_opts(self):
        d = {'Verbose': False}
        if self.nn:
            d['NonNegCoef'] = True
        if self.nb:
            d['NoBndryCross'] = True
        if self.eff != 'ConvBPDNProjL1' and self.eff != 'ConvProdDictL1L1GrdJoint' and self.c['wl1'] != 'one':
            d['L1Weight'] = self.w if self.w.ndim else float(self.w)
            if self.kind == 'AddMaskSim' and self.w.ndim:
                # the weights must cover the appended impulse filters
                d['L1Weight'] = np.concatenate((self.w, np.ones(
                    self.w.shape[:-1] + (self.p.Cd,), dtype=self.dtype)), axis=-1)
        if self.g is not None:
            gv = self.g if self.g.ndim else float(self.g)
            if self.eff in ADMM_TV:
                d['TVWeight'] = gv
            elif self.eff in GRADW:
                if self.kind == 'AddMaskSim':
                    gv = np.concatenate((gv, np.zeros(self.p.Cd, dtype=self.dtype)))
                d['GradWeight'] = gv
        if self.l21 is not None:
            d['L21Weight'] = self.l21
        return d

    def optcls(self):
        return (CLS[self.inner] if self.inner else CLS[self.kind]).Options

    def args(self):
        """Positional arguments after D, [B,] S and before opt."""
        e = self.eff
        if e in ('ConvBPDN', 'ConvProdDictBPDN', 'pgm.ConvBPDN', 'ParConvBPDN'):
            return (self.lmbda,)
        if e in ('ConvBPDNMaskDcpl', 'pgm.ConvBPDNMask'):
            return (self.lmbda, self.W)
        if e in ('ConvL1L1Grd', 'ConvProdDictL1L1Grd'):
            return (self.lmbda, self.mu, self.W)
        if e == 'ConvBPDNProjL1':
            return (self.gamma,)
        if e == 'ConvMinL1InL2Ball':
            return (self.epsilon,)
        return (self.lmbda, self.mu)

    def _members(self, rs):
        """MultiDict: channel range and filter size of each member, and
        whether the members have a channel axis at all."""
        p = self.p
        C, n = p.C, self.n
        if C == 1:
            cuts = [(0, 1)]
        else:
            k = 1 + (self.c['seed'] % (C - 1))
            cuts = [(0, k), (k, C)]
            if rs.rand() < 0.4:
                cuts = [(j, j + 1) for j in range(C)]
        self.nochan = bool(all(j - i == 1 for i, j in cuts) and rs.rand() < 0.5)
        fs = p.D.shape[:n]
        full = rs.randint(len(cuts))
        self.parts = []
        for q, (i, j) in enumerate(cuts):
            f = fs if q == full or rs.rand() < 0.4 else tuple(int(rs.randint(1, v + 1)) for v in fs)
            keep = np.zeros(fs + (1,) * 3, dtype=bool)
            keep[tuple(slice(0, v) for v in f)] = True
            sl = (slice(None),) * n + (slice(i, j),)
            p.Di[sl] = np.where(keep, p.Di[sl], 0)
            self.parts.append((i, j, f))
        p.D = p.Di.reshape(p.D.shape).copy()
        p.D64 = p.Di.astype(float)
        p._A = None

    def splits(self):
        """MultiDict: channel ranges of the member dictionaries."""
        return [(i, j) for i, j, f in self.parts]

    def inputs(self):
        """The arrays handed to the constructor (fresh copies)."""
        p = self.p
        d = {'D': p.D.copy(), 'S': p.S.copy()}
        if self.W is not None:
            d['W'] = self.W.copy()
        if self.B is not None:
            d['B'] = self.B.copy()
        return d

    def make(self, opts=None, inp=None, S=None, D=None, nproc=2, par=None, kw=None):
        opt = stdopt(opts, self.optcls(), self.base_opts)
        p = self.p
        inp = inp or {}
        D = inp.get('D', p.D.copy()) if D is None else D
        S = inp.get('S', p.S.copy()) if S is None else S
        W = inp.get('W', self.W)
        kw = dict(p.kw if kw is None else kw)
        if self.kind == 'AddMaskSim':
            K = CLS[self.inner]
            return cbpdn.AddMaskSim(K, D, S, W, *(self.args() + (opt,)), **kw)
        if self.kind == 'MultiDict':
            n = self.n
            K = CLS[self.inner]
            Ds, Ss = [], []
            for a, b, f in self.parts:
                sl = (slice(None),) * n + ((a,) if self.nochan else (slice(a, b),))
                Db = D[sl]
                cr = tuple(slice(0, v) for v in f)
                rest = Db.copy()
                rest[cr] = 0
                # a caller may pass a transformed dictionary with a larger support
                Ds.append(Db if np.any(rest) else Db[cr])
                Ss.append(S[sl])
            Ds, Ss = tuple(Ds), tuple(Ss)
            return cbpdn.MultiDictConvBPDN(K, Ds, Ss, *(self.args() + (opt,)), **kw)
        if self.kind == 'ParConvBPDN':
            return parcbpdn.ParConvBPDN(D, S, self.lmbda, W, opt, nproc=nproc, ngrp=par, **kw)
        K = CLS[self.kind]
        a = self.args()
        if self.kind == 'ConvProdDictL1L1GrdJoint':
            a = (self.lmbda, self.mu)
        if W is not None and self.kind in MASKED:
            a = a[:-1] + (W,)
        if self.B is not None:
            return K(D, inp.get('B', self.B.copy()), S, *(a + (opt,)), **kw)
        return K(D, S, *(a + (opt,)), **kw)

    def rho0(self):
        """A penalty of the problem's scale."""
        if self.eff in ('ConvMinL1InL2Ball',):
            return 2.0
        if self.kind in L1FID:
            return 2.0
        return max(self.lipA / 4, 1e-2)


def solver_opt(s):
    """The options object actually used by a (possibly wrapped) solver."""
    return s.opt if hasattr(s, 'opt') else s.cbpdn.opt
