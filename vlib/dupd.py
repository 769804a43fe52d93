"""Registry of the dictionary update solvers: generated problems, documented
functionals and constraint sets evaluated independently (direct circular
convolution / correlation, dictionary-size specifications restated in
vlib/dsz.py)."""
import numpy as np
from vlib.core import st, seeds, rng, stdopt
from vlib import dsz as dz
from vlib import ref
import sporco.fft
from sporco.admm import cmod, ccmod, ccmodmd
from sporco.pgm import cmod as pcmod, ccmod as pccmod
from sporco.pgm.momentum import MomentumNesterov, MomentumLinear, MomentumGenLinear
from sporco.pgm.backtrack import BacktrackStandard, BacktrackRobust
from sporco.pgm.stepsize import StepSizePolicyCauchy, StepSizePolicyBB

sporco.fft.pyfftw_threads = 1

DENSE = ['cmod', 'pgm.cmod', 'pgm.wcmod']
CONV = ['ism', 'cg', 'cns', 'pgm']
MASK = ['md.ism', 'md.cg', 'md.cns', 'pgm.md']
ALL = DENSE + CONV + MASK


@st.composite
def case(draw, kinds=tuple(ALL), maxN=(9, 6, 4), maxf=3, maxM=3, maxC=2, maxK=3, dimNs=(1, 1, 2, 2, 3)):
    kind = draw(st.sampled_from(list(kinds)))
    c = dict(kind=kind, seed=draw(seeds()), zm=draw(st.sampled_from([False, False, True])),
             nn=draw(st.sampled_from([False, False, True])),
             zkind=draw(st.sampled_from(['normal', 'sparse', 'sparse', 'deadatom'])),
             skind=draw(st.sampled_from(['normal', 'synth', 'synth', 'zeros', 'smallint'])),
             init=draw(st.sampled_from(['none', 'feas', 'feas', 'rand'])),
             mask=draw(st.sampled_from(['ones', 'bin', 'bin', 'wgt', 'spatial'])))
    if kind in DENSE:
        c.update(N=draw(st.integers(1, 7)), M=draw(st.integers(1, 6)), K=draw(st.integers(1, 8)))
        return c
    n = draw(st.sampled_from(list(dimNs)))
    d = draw(dz.dsz_spec(dimN=n, maxsz=maxf, maxM=maxM if n < 3 else 2, maxC=maxC))
    mx = dz.maxsize(d)
    c['d'] = d
    c['Nv'] = [draw(st.integers(a, max(a, maxN[n - 1]))) for a in mx]
    c['sC'] = draw(st.booleans())
    c['C'] = draw(st.integers(1, 3))
    c['K'] = draw(st.sampled_from([0, 1, 2, maxK]))
    c['cplx'] = draw(st.sampled_from([False] * 5 + [True]))
    return c


class Model(object):

    def __init__(self, c, dtype='float64'):
        self.c = c
        self.kind = c['kind']
        self.dense = c['kind'] in DENSE
        self.masked = c['kind'] in MASK or c['kind'] == 'pgm.wcmod'
        self.pgm = c['kind'].startswith('pgm')
        self.cplx = bool(c.get('cplx')) and c['kind'] in ('ism', 'cg', 'cns')
        self.rdtype = np.dtype(dtype)
        self.dtype = np.result_type(dtype, np.complex64) if self.cplx else self.rdtype
        self.zm = bool(c['zm'])
        self.nn = bool(c['nn']) and self.kind in ('pgm.cmod', 'pgm.wcmod') and not self.zm
        rs = rng(c['seed'], 41)

        def rnd(shp, kind='normal'):
            def one():
                if kind == 'sparse':
                    return rs.randn(*shp) * (rs.rand(*shp) < 0.35)
                if kind == 'smallint':
                    return rs.randint(-3, 4, size=shp).astype(float)
                if kind == 'zeros':
                    return np.zeros(shp)
                return rs.randn(*shp)
            return one() + 1j * one() if self.cplx else one()
        zk = c['zkind']
        if self.dense:
            self.shpD = (c['N'], c['M'])
            Z = rnd((c['M'], c['K']), 'sparse' if zk != 'normal' else 'normal')
            if zk == 'deadatom':
                Z[rs.randint(c['M'])] = 0
            self.supp = np.ones(self.shpD, dtype=bool)
            self.shpS = (c['N'], c['K'])
        else:
            d = c['d']
            self.d = d
            self.n = d['dimN']
            self.Nv = tuple(c['Nv'])
            self.M = d['M']
            self.Cd = d['C']
            hasC = d['form'] in 'BDE'
            sC = hasC or c['sC']
            self.C = (d['C'] if d['C'] > 1 else c['C']) if sC else 1
            self.sC = sC
            self.Cx = 1 if d['C'] > 1 else self.C
            self.sK = c['K'] > 0
            self.K = max(c['K'], 1)
            self.dimK = 1 if self.sK else 0
            self.shpD = self.Nv + (self.Cd, 1, self.M)
            self.shpZ = self.Nv + (self.Cx, self.K, self.M)
            self.shpS = self.Nv + (self.C, self.K, 1)
            self.supp = dz.mask(d, self.Nv).reshape(self.shpD)
            self.spec = dz.as_tuple(d['spec'])
            Z = rnd(self.shpZ, 'sparse' if zk != 'normal' else 'normal')
            if zk == 'deadatom':
                Z[..., rs.randint(self.M)] = 0
        self.Z = Z.astype(self.dtype)
        if c.get('unit'):
            # coefficients scaled to a data term with Lipschitz constant one
            self.W2 = np.ones(1)
            self.Z = (Z / np.sqrt(self.lip())).astype(self.dtype)
        self.D0 = self.proj(rnd(self.shpD))              # a feasible start
        self.Draw = rnd(self.shpD) * (1.0 if c['seed'] % 2 else 3.0)
        if c['skind'] == 'synth':
            Dt = self.proj(rnd(self.shpD))
            S = self.synth(Dt) + 0.1 * rnd(self.shpS)
        else:
            S = rnd(self.shpS, c['skind'])
        self.Si = np.asarray(S).astype(self.dtype)
        self.S = self.Si if self.dense else self.Si.reshape(
            self.Nv + ((self.C,) if self.sC else ()) + ((self.K,) if self.sK else ()))
        # mask
        self.W = None
        self.Wi = np.ones(self.shpS)
        if self.masked:
            if c['mask'] == 'spatial' and not self.dense:
                w = (rs.rand(*(self.Nv + (1, 1, 1))) < 0.7) * 1.0
                self.W = w.reshape(self.Nv).astype(self.rdtype)
            else:
                w = np.ones(self.shpS) if c['mask'] == 'ones' else (rs.rand(*self.shpS) < 0.7) * 1.0
                if c['mask'] == 'wgt':
                    w = w * (0.3 + rs.rand(*self.shpS))
                self.W = w.astype(self.rdtype)
            self.Wi = np.broadcast_to(self.W.reshape(w.shape), self.shpS).astype(float)
            # the weighted dense update uses the weights themselves, not their squares
            self.W2 = self.Wi if self.kind == 'pgm.wcmod' else self.Wi**2
        else:
            self.W2 = self.Wi

    # -- operators --------------------------------------------------------------
    def f64(self, x):
        return np.asarray(x).astype(complex if self.cplx else float)

    def synth(self, D, Z=None):
        """Linear model: internal D (Nv,Cd,1,M) or (N,M) -> shpS."""
        Z = self.f64(self.Z if Z is None else Z)
        D = self.f64(D)
        if self.dense:
            return D @ Z
        return ref.synth(D, Z, self.n)

    def gradient(self, D, Z=None):
        Z = self.f64(self.Z if Z is None else Z)
        R = self.W2 * (self.synth(D, Z) - self.f64(self.Si))
        if self.dense:
            return R @ Z.T
        G = np.zeros(self.shpD, dtype=complex if self.cplx else float)
        for ix in np.ndindex(*self.Nv):
            # correlation at lag ix: sum_x conj(Z[x - ix]) R[x]
            v = np.conj(np.roll(Z, ix, axis=tuple(range(self.n)))) * R
            v = v.sum(axis=tuple(range(self.n)))                  # Cmax, K, M
            v = v.sum(axis=1)                                     # C, M
            if self.Cd == 1:
                v = v.sum(axis=0, keepdims=True)
            G[ix] = v[:, None, :]
        return G

    def dfid(self, D, Z=None):
        R = self.synth(D, Z) - self.f64(self.Si)
        return float(0.5 * np.sum(self.W2 * np.abs(R)**2))

    def lip(self, Z=None):
        """Upper bound on the largest eigenvalue of the Hessian."""
        Z = self.f64(self.Z if Z is None else Z)
        if self.dense:
            return max(np.linalg.norm(Z, 2)**2 * max(self.W2.max(), 1e-12), 1e-6)
        F = np.fft.fftn(Z, axes=tuple(range(self.n)))
        A = F.reshape(-1, self.Cx * self.K, self.M)
        s = np.linalg.norm(A, 2, axis=(1, 2)).max()**2
        return max(float(s) * max(self.W2.max(), 1e-12), 1e-6)

    # -- constraint set -----------------------------------------------------------
    def proj(self, X):
        X = self.f64(X)
        if self.dense:
            if self.zm:
                X = X - X.mean(axis=0)
            if self.nn:
                X = np.maximum(X, 0)
            nr = np.sqrt(np.sum(np.abs(X)**2, axis=0))
            nr[nr == 0] = 1
            return X / nr
        sh = self.Nv + (self.Cd, self.M)
        return dz.project(X.reshape(sh), self.d, self.zm).reshape(self.shpD)

    def full(self, D):
        """Cropped dictionary (as returned by getdict) -> full size array."""
        D = self.f64(D)
        if self.dense:
            return D
        out = np.zeros(self.shpD, dtype=D.dtype)
        out[tuple(slice(0, s) for s in D.shape[:self.n])] = D
        return out

    def infeasible(self, D, tol=None):
        """'' or what is wrong with the (full size) dictionary D."""
        D = self.f64(D)
        if tol is None:
            tol = 1e-4 if self.rdtype == np.float32 else 1e-9
        if not np.all(np.isfinite(D)):
            return 'non-finite dictionary'
        if np.abs(D[~self.supp]).sum() > 0:
            return 'non-zero outside the filter support'
        ax = (0,) if self.dense else tuple(range(self.n + 1))
        nr = np.sqrt(np.sum(np.abs(D)**2, axis=ax)).ravel()
        bad = (np.abs(nr - 1) > tol) & (nr > 0)
        if bad.any():
            return 'atom norms %s' % nr
        if self.zm:
            if self.dense:
                m = np.abs(D.mean(axis=0)).max()
            else:
                m = 0.0
                sp = self.supp.reshape(self.Nv + (self.Cd, self.M))
                Dr = D.reshape(sp.shape)
                for c in range(self.Cd):
                    for k in range(self.M):
                        m = max(m, abs(Dr[..., c, k][sp[..., c, k]].mean()))
            if m > tol:
                return 'mean %g with ZeroMean' % m
        if self.nn and D.min() < 0:
            return 'negative entry with NonNegCoef'
        return ''

    def stationarity(self, D, Z=None):
        """Norm of the part of the gradient that no normal of the constraint
        set at D accounts for, relative to the scale of the problem."""
        D = self.f64(D)
        G = self.gradient(D, Z)
        scale = max(np.abs(self.gradient(np.zeros_like(D), Z)).max(), self.lip(Z), 1e-9)
        if self.dense:
            if self.zm:
                G = G - G.mean(axis=0)
            ax = (0,)
        else:
            G = np.where(self.supp, G, 0)
            if self.zm:
                sp = self.supp.reshape(self.Nv + (self.Cd, self.M))
                Gr = G.reshape(sp.shape)
                for c in range(self.Cd):
                    for k in range(self.M):
                        v = Gr[..., c, k]
                        v[sp[..., c, k]] -= v[sp[..., c, k]].mean()
                G = Gr.reshape(self.shpD)
            ax = tuple(range(self.n + 1))
        act = np.ones(D.shape, dtype=bool)
        if self.nn:
            act = D > 0
            low = np.where(act, 0, np.minimum(G, 0))
        t = np.sum(np.real(np.conj(D) * G), axis=ax, keepdims=True)
        T = np.where(act, G - t * D, 0)
        # an all-zero atom is left alone by the algorithms only when nothing pulls it away
        r = np.abs(T).max()
        if self.nn:
            r = max(r, np.abs(low).max())
        return float(r / scale)

    # -- construction -------------------------------------------------------------
    def optcls(self):
        k = self.kind
        c = {'cmod': cmod.CnstrMOD.Options, 'pgm.cmod': pcmod.CnstrMOD.Options,
             'pgm.wcmod': pcmod.WeightedCnstrMOD.Options, 'pgm': pccmod.ConvCnstrMOD.Options,
             'pgm.md': pccmod.ConvCnstrMODMask.Options}.get(k)
        if c is not None:
            return c
        if k.startswith('md.'):
            return lambda d=None: ccmodmd.ConvCnstrMODMaskDcplOptions(d, method=k[3:])
        return lambda d=None: ccmod.ConvCnstrMODOptions(d, method=k)

    def init(self, full=False):
        """Initial value option."""
        if self.c['init'] == 'none':
            return {}
        D = self.D0 if self.c['init'] == 'feas' else self.Draw
        D = D.astype(self.dtype)
        if self.pgm:
            return {'X0': D}
        if self.kind.startswith('md.') and self.kind != 'md.cns':
            # two-block variable: data block (zero) then dictionary
            CK = (self.C if self.Cd == 1 else 1) * self.K
            Y = np.zeros(self.Nv + (self.Cd, 1, self.M + CK), dtype=self.dtype)
            Y[..., CK:] = D
            return {'Y0': Y}
        return {'Y0': D}

    def base_opts(self):
        d = {'Verbose': False}
        if self.zm:
            d['ZeroMean'] = True
        if self.nn:
            d['NonNegCoef'] = True
        return d

    def inputs(self):
        r = {'Z': self.Z.copy(), 'S': self.S.copy()}
        if self.W is not None:
            r['W'] = self.W.copy()
        return r

    def make(self, opts=None, inp=None, Z=None, S=None, noZ=False):
        opt = stdopt(opts, self.optcls(), self.base_opts)
        inp = inp or self.inputs()
        Z = inp['Z'] if Z is None else Z
        S = inp['S'] if S is None else S
        W = inp.get('W')
        k = self.kind
        if k == 'cmod':
            return cmod.CnstrMOD(Z, S, None, opt)
        if k == 'pgm.cmod':
            return pcmod.CnstrMOD(Z, S, None, opt)
        if k == 'pgm.wcmod':
            return pcmod.WeightedCnstrMOD(Z, S, W, None, opt)
        kw = dict(dimK=self.dimK, dimN=self.n)
        if k in ('ism', 'cg', 'cns'):
            return ccmod.ConvCnstrMOD(Z, S, self.spec, opt, method=k, **kw)
        if k == 'pgm':
            return pccmod.ConvCnstrMOD(Z, S, self.spec, opt, **kw)
        if k == 'pgm.md':
            return pccmod.ConvCnstrMODMask(Z, S, W, self.spec, opt, **kw)
        return ccmodmd.ConvCnstrMODMaskDcpl(Z, S, W, self.spec, opt, method=k[3:], **kw)


@st.composite
def options(draw):
    return dict(rho=draw(st.sampled_from([None, 0.5, 2.0, 8.0])), relax=draw(st.sampled_from([1.0, 1.5, 1.8])),
                auto=draw(st.sampled_from(['default', 'off', 'off', 'on'])), aux=draw(st.booleans()),
                chk=draw(st.booleans()), cgtol=draw(st.sampled_from([1e-3, 1e-8])),
                mom=draw(st.sampled_from(['nesterov', 'nesterov', 'linear', 'genlinear', 'none'])),
                bt=draw(st.sampled_from(['none', 'none', 'std', 'robust'])),
                step=draw(st.sampled_from(['none', 'none', 'none', 'cauchy', 'bb'])),
                mono=draw(st.sampled_from([False, False, True])),
                L=draw(st.sampled_from([0.3, 1.05, 1.05, 4.0])))


def mkopts(m, o, fallback=None, lip=None):
    """Option dict for model m from generated options o; `fallback` is a
    multiple of the Lipschitz constant for a plain run."""
    lip = m.lip() if lip is None else lip
    if m.pgm:
        d = {}
        if fallback is not None:
            d = {'L': float(fallback * 1.02 * lip), 'Momentum': MomentumGenLinear(1e7, 1e7)}
        else:
            Lf = o['L']
            if o['bt'] == 'none':
                Lf = max(Lf, 1.05)
                if o['step'] == 'cauchy':
                    d['StepSizePolicy'] = StepSizePolicyCauchy()
                elif o['step'] == 'bb':
                    d['StepSizePolicy'] = StepSizePolicyBB()
            else:
                d['Backtrack'] = {'std': BacktrackStandard(), 'robust': BacktrackRobust()}[o['bt']]
            d['L'] = float(Lf * lip)
            d['Momentum'] = {'nesterov': MomentumNesterov(), 'linear': MomentumLinear(),
                             'genlinear': MomentumGenLinear(), 'none': MomentumGenLinear(1e7, 1e7)}[o['mom']]
            d['Monotone'] = bool(o['mono'])
        return d
    d = {'RelaxParam': o['relax']}
    scale = lip
    if m.kind.startswith('md.'):
        scale = 1.0 if fallback is None else max(lip, 1.0)
    if fallback is not None:
        d['rho'] = float(fallback * scale)
        d['RelaxParam'] = 1.0
        d['AutoRho'] = {'Enabled': False}
    else:
        if o['rho'] is not None:
            d['rho'] = float(o['rho'] * scale)
        if o['auto'] != 'default':
            d['AutoRho'] = {'Enabled': o['auto'] == 'on'}
        d['AuxVarObj'] = bool(o['aux'])
    if not m.dense:
        d['LinSolveCheck'] = bool(o['chk'])
    if m.kind.endswith('cg'):
        d['CG'] = {'MaxIter': 500, 'StopTol': 1e-9 if fallback is not None else o['cgtol']}
    return d
