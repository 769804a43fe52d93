"""Registry of the dictionary learning classes: generated training problems,
documented functionals and constraint sets evaluated independently."""
import numpy as np
from vlib.core import st, seeds, rng
from vlib import dsz as dz
from vlib import ref
import sporco.fft
from sporco.dictlrn import bpdndl, wbpdndl, cbpdndl, cbpdndlmd, onlinecdl, prlcnscdl
from sporco.pgm.backtrack import BacktrackStandard, BacktrackRobust
from sporco.pgm.momentum import MomentumNesterov, MomentumLinear, MomentumGenLinear

sporco.fft.pyfftw_threads = 1

DENSE = ['bpdn', 'wbpdn']
BATCH = ['conv', 'mask']
PAR = ['par', 'parmask']
ONLINE = ['online', 'onlinemask']
ALL = DENSE + BATCH * 3 + PAR + ONLINE
MASKED = ['mask', 'parmask', 'onlinemask', 'wbpdn']


@st.composite
def case(draw, kinds=tuple(ALL), maxN=(9, 6, 4), maxf=3, maxM=3, maxC=2, maxK=3, dimNs=(1, 1, 2, 2, 3)):
    kind = draw(st.sampled_from(list(kinds)))
    c = dict(kind=kind, seed=draw(seeds()), zm=draw(st.sampled_from([False, False, True])),
             nn=draw(st.sampled_from([False, False, False, True])),
             nb=draw(st.sampled_from([False, False, False, True])),
             dnn=draw(st.sampled_from([False, False, True])),
             wl1=draw(st.sampled_from(['one', 'one', 'scalar', 'filt', 'full'])),
             skind=draw(st.sampled_from(['normal', 'normal', 'smallint', 'smooth'])),
             d0=draw(st.sampled_from(['normal', 'normal', 'unit', 'big'])),
             mask=draw(st.sampled_from(['ones', 'bin', 'bin', 'wgt', 'spatial', 'spatial'])),
             lam=draw(st.sampled_from([0.01, 0.05, 0.2])))
    if kind in DENSE:
        c.update(N=draw(st.integers(1, 7)), M=draw(st.integers(1, 6)), K=draw(st.integers(1, 8)))
        return c
    n = draw(st.sampled_from(list(dimNs)))
    d = draw(dz.dsz_spec(dimN=n, maxsz=maxf, maxM=maxM if n < 3 else 2, maxC=maxC))
    mx = dz.maxsize(d)
    c['d'] = d
    c['Nv'] = [draw(st.integers(a, max(a, maxN[n - 1]))) for a in mx]
    c['sC'] = draw(st.booleans())
    c['C'] = draw(st.integers(1, 3))
    c['K'] = draw(st.sampled_from([0, 1, 2, maxK]))
    c['xm'] = draw(st.sampled_from(['admm', 'admm', 'pgm']))
    c['dm'] = draw(st.sampled_from(['ism', 'cg', 'cns', 'pgm', 'pgm']))
    c['nproc'] = draw(st.sampled_from([0, 0, 0, 1, 2])) if kind in PAR else 0
    return c


OPTS = st.fixed_dictionaries({
    'xit': st.sampled_from([1, 1, 1, 2]), 'dit': st.sampled_from([1, 1, 1, 2]), 'acc': st.booleans(),
    'xrho': st.sampled_from([None, 0.5, 2.0, 8.0]), 'drho': st.sampled_from([None, 0.5, 2.0, 8.0]),
    'xrelax': st.sampled_from([1.0, 1.5, 1.8]), 'drelax': st.sampled_from([1.0, 1.5, 1.8]),
    'auto': st.sampled_from([None, 'off', 'off', 'on']), 'aux': st.sampled_from([None, True, False]),
    'bt': st.sampled_from(['none', 'none', 'std', 'robust']), 'mono': st.sampled_from([False, False, True]),
    'mom': st.sampled_from(['nesterov', 'linear', 'genlinear']), 'L': st.sampled_from([1.05, 4.0]),
    'eta': st.sampled_from([(1.0, 5.0), (10.0, 5.0), (0.3, 2.0)])})


class Model(object):

    def __init__(self, c, dtype='float64'):
        self.c = c = dict(c)
        self.kind = kind = c['kind']
        self.dense = kind in DENSE
        self.masked = kind in MASKED
        self.par = kind in PAR
        self.online = kind in ONLINE
        self.xm, self.dm = c.get('xm', 'admm'), c.get('dm', 'pgm')
        if self.par:
            self.xm, self.dm = 'admm', 'cns'
        if kind == 'bpdn':
            self.xm, self.dm = 'admm', 'admm'
        if self.online:
            self.xm = 'admm'
        if kind == 'wbpdn':
            self.xm, self.dm = 'pgm', 'pgm'
        self.dtype = np.dtype(dtype)
        self.zm = bool(c['zm'])
        self.nn = bool(c['nn'])
        self.nb = bool(c['nb']) and not self.dense
        self.dnn = bool(c['dnn']) and kind == 'wbpdn' and not self.zm
        rs = rng(c['seed'], 61)
        self.rs = rs

        def rnd(shp, kind='normal'):
            if kind == 'smallint':
                return rs.randint(-3, 4, size=shp).astype(float)
            v = rs.randn(*shp)
            if kind == 'smooth':
                for a in range(min(len(shp), 2)):
                    v = v + 0.7 * np.roll(v, 1, axis=a)
            return v
        self.rnd = rnd
        if self.dense:
            self.n = 1
            self.shpD = (c['N'], c['M'])
            self.shpX = (c['M'], c['K'])
            self.shpS = (c['N'], c['K'])
            self.supp = np.ones(self.shpD, dtype=bool)
            self.C = self.K = 1
            D0 = rnd(self.shpD)
            S = rnd(self.shpS, c['skind'])
            self.shpSx = self.shpS
        else:
            d = self.d = c['d']
            self.n = d['dimN']
            self.Nv = tuple(c['Nv'])
            self.M, self.Cd = d['M'], d['C']
            hasC = d['form'] in 'BDE'
            sC = hasC or c['sC']
            self.C = (d['C'] if d['C'] > 1 else c['C']) if sC else 1
            if self.par and self.Cd == 1:
                self.C = 1                      # documented restriction
            self.sC = sC
            self.Cx = 1 if d['C'] > 1 else self.C
            self.sK = c['K'] > 0
            self.K = max(c['K'], 1)
            self.dimK = 1 if self.sK else 0
            self.shpD = self.Nv + (self.Cd, 1, self.M)
            self.shpX = self.Nv + (self.Cx, self.K, self.M)
            self.shpS = self.Nv + (self.C, self.K, 1)
            self.shpSx = self.Nv + ((self.C,) if sC else ()) + ((self.K,) if self.sK else ())
            self.supp = dz.mask(d, self.Nv).reshape(self.shpD)
            self.spec = dz.as_tuple(d['spec'])
            self.msz = tuple(dz.maxsize(d))
            D0 = rnd(self.msz + ((self.Cd,) if hasC else ()) + (self.M,))
            self.dsz = None if (d['form'] in 'AB' and c['seed'] % 2) else self.spec
            S = rnd(self.shpS, c['skind'])
        if c['d0'] == 'big':
            D0 = 5.0 * D0
        self.D0 = D0.astype(dtype)
        if c['d0'] == 'unit':
            self.D0 = self.crop(self.D0n).reshape(self.D0.shape).astype(dtype)
        self.Si = np.asarray(S).astype(dtype)
        self.S = self.Si.reshape(self.shpSx)
        # mask
        self.W = None
        self.Wi = np.ones(self.shpS)
        if self.masked:
            self.W, self.Wi = self.mkmask(self.shpS, c['mask'], rs)
        # the weighted dense problem uses the weights themselves, not their squares
        self.W2 = self.Wi if kind == 'wbpdn' else self.Wi**2
        # coefficient weights
        w = {'one': np.ones(()), 'scalar': np.asarray(0.4 + rs.rand()),
             'filt': 0.2 + 2 * rs.rand(*((1,) * (len(self.shpX) - 1) + (self.shpX[-1],))) if not self.dense
             else 0.2 + 2 * rs.rand(self.shpX[0], 1),
             'full': 0.2 + 2 * rs.rand(*self.shpX)}[c['wl1']]
        if self.online and c['wl1'] == 'full':
            w = np.ones(())
        self.w = w.astype(dtype)
        self.wf = np.broadcast_to(np.asarray(self.w, dtype=float), self.shpX)
        g = self.gradX(self.D0n)
        self.lmbda = float(c['lam'] * max(np.abs(g).max(), 1e-2))

    def mkmask(self, shpS, mk, rs):
        if mk == 'spatial' and not self.dense:
            w = (rs.rand(*(self.Nv + (1, 1, 1))) < 0.7) * 1.0
            W = w.reshape(self.Nv).astype(self.dtype)
        else:
            w = np.ones(shpS) if mk == 'ones' else (rs.rand(*shpS) < 0.7) * 1.0
            if mk == 'wgt':
                w = w * (0.3 + rs.rand(*shpS))
            W = w.astype(self.dtype)
        return W, np.broadcast_to(W.reshape(w.shape), shpS).astype(float)

    # -- operators ----------------------------------------------------------
    def full(self, D):
        """Any returned dictionary -> internal full size array."""
        D = np.asarray(D, dtype=float)
        if self.dense:
            return D
        D = D.reshape(D.shape[:self.n] + (self.Cd, 1, self.M))
        out = np.zeros(self.shpD)
        out[tuple(slice(0, s) for s in D.shape[:self.n])] = D
        return out

    def crop(self, D):
        return D if self.dense else D[tuple(slice(0, s) for s in self.msz)]

    def proj(self, X):
        X = np.asarray(X, dtype=float)
        if self.dense:
            if self.zm:
                X = X - X.mean(axis=0)
            if self.dnn:
                X = np.maximum(X, 0)
            nr = np.sqrt(np.sum(X**2, axis=0))
            nr[nr == 0] = 1
            return X / nr
        return dz.project(X.reshape(X.shape[:self.n] + (self.Cd, self.M)), self.d, self.zm).reshape(
            X.shape[:self.n] + (self.Cd, 1, self.M))

    @property
    def D0n(self):
        return self.proj(self.full(self.D0))

    def synth(self, D, X):
        D, X = np.asarray(D, dtype=float), np.asarray(X, dtype=float)
        return D @ X if self.dense else ref.synth(D, X, self.n)

    def res(self, D, X):
        return self.synth(D, X) - np.asarray(self.Si, dtype=float)

    def dfid(self, D, X):
        return float(0.5 * np.sum(self.W2 * self.res(D, X)**2))

    def l1(self, X):
        return float(np.sum(self.wf * np.abs(np.asarray(X, dtype=float))))

    def gradX(self, D):
        """Correlation of the dictionary with the (weighted) signal."""
        R = self.W2 * np.asarray(self.Si, dtype=float)
        if self.dense:
            return D.T @ R
        G = np.zeros(self.shpX)
        for ix in np.ndindex(*self.crop(D).shape[:self.n]):
            v = D[ix] * np.roll(R, tuple(-i for i in ix), axis=tuple(range(self.n)))
            if self.Cd > 1:
                v = v.sum(axis=self.n, keepdims=True)
            G += v
        return G

    def gradD(self, D, X, S=None, W2=None):
        S = np.asarray(self.Si if S is None else S, dtype=float)
        R = (self.synth(D, X) - S) * (self.W2 if W2 is None else W2)
        X = np.asarray(X, dtype=float)
        if self.dense:
            return R @ X.T
        G = np.zeros(self.shpD)
        for ix in np.ndindex(*self.Nv):
            v = np.roll(X, ix, axis=tuple(range(self.n))) * R
            v = v.sum(axis=tuple(range(self.n))).sum(axis=1)
            if self.Cd == 1:
                v = v.sum(axis=0, keepdims=True)
            G[ix] = v[:, None, :]
        return G

    def infeasible(self, D, tol=None):
        D = self.full(D)
        if tol is None:
            tol = 1e-4 if self.dtype == np.float32 else 1e-9
        if not np.all(np.isfinite(D)):
            return 'non-finite dictionary'
        if np.abs(D[~self.supp]).sum() > 0:
            return 'non-zero outside the filter support'
        ax = (0,) if self.dense else tuple(range(self.n + 1))
        nr = np.sqrt(np.sum(D**2, axis=ax)).ravel()
        if ((np.abs(nr - 1) > tol) & (nr > 0)).any():
            return 'atom norms %s' % nr
        if self.zm:
            m = 0.0
            if self.dense:
                m = np.abs(D.mean(axis=0)).max()
            else:
                sp = self.supp.reshape(self.Nv + (self.Cd, self.M))
                Dr = D.reshape(sp.shape)
                for c in range(self.Cd):
                    for k in range(self.M):
                        m = max(m, abs(Dr[..., c, k][sp[..., c, k]].mean()))
            if m > tol:
                return 'mean %g with ZeroMean' % m
        if self.dnn and D.min() < 0:
            return 'negative entry with NonNegCoef'
        return ''

    # -- construction -------------------------------------------------------
    def cls(self):
        return {'bpdn': bpdndl.BPDNDictLearn, 'wbpdn': wbpdndl.WeightedBPDNDictLearn,
                'conv': cbpdndl.ConvBPDNDictLearn, 'mask': cbpdndlmd.ConvBPDNMaskDictLearn,
                'par': prlcnscdl.ConvBPDNDictLearn_Consensus,
                'parmask': prlcnscdl.ConvBPDNMaskDcplDictLearn_Consensus,
                'online': onlinecdl.OnlineConvBPDNDictLearn,
                'onlinemask': onlinecdl.OnlineConvBPDNMaskDictLearn}[self.kind]

    def keys(self):
        return ('BPDN', 'CMOD') if self.dense else ('CBPDN', 'CCMOD')

    def xopts(self, o):
        d = {}
        if self.xm == 'pgm':
            L = 1.0
            if self.dense:
                L = self.shpD[1]
            else:
                L = self.M * np.prod(self.msz) * max(1.0, 1.0)
            d['L'] = float(o['L'] * L * max(self.W2.max(), 1e-3))
            d['Monotone'] = o['mono']
            d['Momentum'] = {'nesterov': MomentumNesterov, 'linear': MomentumLinear,
                             'genlinear': MomentumGenLinear}[o['mom']]()
            if o['bt'] != 'none':
                d['Backtrack'] = BacktrackStandard() if o['bt'] == 'std' else BacktrackRobust()
        else:
            if o['xrho'] is not None:
                d['rho'] = o['xrho']
            d['RelaxParam'] = o['xrelax']
            if o['auto'] is not None:
                d['AutoRho'] = {'Enabled': o['auto'] == 'on', 'Period': 1}
            if o['aux'] is not None:
                d['AuxVarObj'] = o['aux']
        if self.nn:
            d['NonNegCoef'] = True
        if self.nb:
            d['NoBndryCross'] = True
        if self.c['wl1'] != 'one' and not (self.online and self.c['wl1'] == 'full'):
            d['L1Weight'] = self.w.copy() if self.w.ndim else float(self.w)
        if not self.online:
            d['MaxMainIter'] = 1 if self.par else o['xit']
        return d

    def dopts(self, o):
        d = {'MaxMainIter': 1 if self.par else o['dit']}
        if self.dm == 'pgm':
            d['L'] = float(o['L'] * 20.0)
            d['Monotone'] = o['mono']
            d['Momentum'] = {'nesterov': MomentumNesterov, 'linear': MomentumLinear,
                             'genlinear': MomentumGenLinear}[o['mom']]()
            if o['bt'] != 'none':
                d['Backtrack'] = BacktrackStandard() if o['bt'] == 'std' else BacktrackRobust()
        else:
            if o['drho'] is not None:
                d['rho'] = o['drho']
            d['RelaxParam'] = o['drelax']
            if o['auto'] is not None:
                d['AutoRho'] = {'Enabled': o['auto'] == 'on', 'Period': 1}
            if o['aux'] is not None:
                d['AuxVarObj'] = o['aux']
            if self.dm == 'cg':
                d['CG'] = {'MaxIter': 500, 'StopTol': 1e-8}
        if self.zm:
            d['ZeroMean'] = True
        if self.dnn:
            d['NonNegCoef'] = True
        return d

    def optdict(self, o, extra=None):
        kx, kd = self.keys()
        if self.online:
            d = {'Verbose': False, 'eta_a': float(o['eta'][0]), 'eta_b': float(o['eta'][1]), 'ZeroMean': self.zm,
                 'CBPDN': dict(self.xopts(dict(o)), MaxMainIter=5 * o['xit'])}
        else:
            d = {'Verbose': False, 'MaxMainIter': 3, kx: self.xopts(o), kd: self.dopts(o)}
            if self.kind != 'par':
                d['AccurateDFid'] = bool(o['acc'])
        if not self.dense and self.dsz is not None:
            d['DictSize'] = self.dsz
        d.update(extra or {})
        return d

    def mkopt(self, o, extra=None):
        d = self.optdict(o, extra)
        if self.kind in BATCH:
            return self.cls().Options(d, xmethod=self.xm, dmethod=self.dm)
        return self.cls().Options(d)

    def inputs(self):
        r = {'D0': self.D0.copy(), 'S': self.S.copy()}
        if self.W is not None:
            r['W'] = self.W.copy()
        return r

    def make(self, o, extra=None, inp=None, opt=None):
        if opt is None:
            opt = self.mkopt(o, extra)
        elif opt in ('none', 'default'):
            kw = dict(xmethod=self.xm, dmethod=self.dm) if self.kind in BATCH else {}
            opt = None if opt == 'none' else self.cls().Options(**kw)
        inp = inp or self.inputs()
        D0, S, W = inp['D0'], inp['S'], inp.get('W')
        K, k = self.cls(), self.kind
        if k == 'bpdn':
            return K(D0, S, self.lmbda, opt)
        if k == 'wbpdn':
            return K(D0, S, self.lmbda, W, opt)
        if k == 'conv':
            return K(D0, S, self.lmbda, opt, xmethod=self.xm, dmethod=self.dm, dimK=self.dimK, dimN=self.n)
        if k == 'mask':
            return K(D0, S, self.lmbda, W, opt, xmethod=self.xm, dmethod=self.dm, dimK=self.dimK, dimN=self.n)
        if k == 'par':
            return K(D0, S, self.lmbda, opt, nproc=self.c['nproc'], dimK=self.dimK, dimN=self.n)
        if k == 'parmask':
            return K(D0, S, self.lmbda, W, opt, nproc=self.c['nproc'], dimK=self.dimK, dimN=self.n)
        return K(D0, self.lmbda, opt, dimK=self.dimK, dimN=self.n)

    def feed(self, b, S, W=None):
        """One step of an online learner."""
        if self.kind == 'onlinemask':
            return b.solve(S, W)
        return b.solve(S)
