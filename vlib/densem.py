"""Registry of the non-convolutional sparse coding solvers (used where the
optimum itself does not matter)."""
import numpy as np
from vlib.core import st, seeds, rng, stdopt
from vlib.statm import l1ball_dist, l2ball_dist
from sporco.admm import bpdn as abpdn
from sporco.pgm import bpdn as pbpdn

ADMM = ['BPDN', 'BPDNJoint', 'ElasticNet', 'BPDNProjL1', 'MinL1InL2Ball']
PGM = ['pgm.BPDN', 'pgm.WeightedBPDN']
ALL = ADMM + PGM


@st.composite
def case(draw, kinds=tuple(ALL)):
    return dict(kind=draw(st.sampled_from(list(kinds))), seed=draw(seeds()), r=draw(st.integers(1, 8)),
                c=draw(st.integers(1, 9)), m=draw(st.integers(1, 3)), lam=draw(st.sampled_from([0.02, 0.1, 0.4])),
                mu=draw(st.sampled_from([0.0, 0.1, 0.5])), wl1=draw(st.sampled_from(['one', 'scalar', 'row', 'col', 'full'])),
                nn=draw(st.booleans()), W=draw(st.sampled_from(['none', 'vec', 'full', 'zeros'])),
                y0=draw(st.sampled_from(['none', 'none', 'rand'])))


class Model(object):
    inner = None

    def __init__(self, c, dtype='float64'):
        self.c = c = dict(c)
        self.kind = c['kind']
        self.pgm = self.kind.startswith('pgm')
        self.dtype = np.dtype(dtype)
        rs = rng(c['seed'], 51)
        r, q, m = c['r'], c['c'], c['m']
        self.D = rs.randn(r, q).astype(dtype)
        self.S = rs.randn(r, m).astype(dtype)
        self.D64, self.S64 = self.D.astype(float), self.S.astype(float)
        self.shpX = (q, m)
        w = {'one': np.ones(()), 'scalar': np.asarray(0.5 + rs.rand()), 'row': 0.2 + rs.rand(1, m),
             'col': 0.2 + rs.rand(q, 1), 'full': rs.rand(q, m)}[c['wl1']]
        if self.kind == 'BPDNProjL1':
            w = np.ones(())
        self.w = w.astype(dtype)
        self.wf = np.broadcast_to(np.asarray(self.w, dtype=float), self.shpX)
        lmx = max(np.abs(self.D64.T.dot(self.S64)).max(), 1e-3)
        self.lmbda, self.mu = float(c['lam'] * lmx), float(c['mu'] * lmx)
        self.gamma = float(0.3 * max(1e-2, np.abs(np.linalg.lstsq(self.D64, self.S64, rcond=None)[0]).sum(axis=0).max()))
        self.epsilon = float(0.3 * np.sqrt(np.sum(self.S64**2, axis=0)).max())
        self.nn = c['nn']
        self.W = None
        self.Wf = np.ones((r, m))
        if self.kind == 'pgm.WeightedBPDN' and c['W'] != 'none':
            self.W = {'vec': 0.2 + rs.rand(r), 'full': 0.2 + rs.rand(r, m),
                      'zeros': (rs.rand(r, m) < 0.7) * 1.5}[c['W']].astype(dtype)
            self.Wf = np.broadcast_to(self.W.reshape(r, 1) if self.W.ndim == 1 else self.W, (r, m)).astype(float)
        self.lip = max(np.linalg.norm(self.D64, 2)**2 * self.Wf.max(), 1e-3)
        self.Y0 = rs.randn(q, m).astype(dtype)

    def cls(self):
        return getattr(pbpdn, self.kind[4:]) if self.pgm else getattr(abpdn, self.kind)

    def optcls(self):
        return self.cls().Options

    def rho0(self):
        return 1.0 if self.kind == 'MinL1InL2Ball' else max(self.lip / 4, 1e-2)

    def inputs(self):
        d = {'D': self.D.copy(), 'S': self.S.copy()}
        if self.W is not None:
            d['W'] = self.W.copy()
        return d

    def base_opts(self):
        d = {'Verbose': False}
        d['NonNegCoef'] = self.nn
        if self.kind != 'BPDNProjL1' and self.c['wl1'] != 'one':
            d['L1Weight'] = self.w if self.w.ndim else float(self.w)
        if self.c['y0'] == 'rand' and self.kind != 'MinL1InL2Ball':
            d['X0' if self.pgm else 'Y0'] = self.Y0.copy()
        return d

    def make(self, opts=None, inp=None):
        K = self.cls()
        opt = stdopt(opts, K.Options, self.base_opts)
        inp = inp or self.inputs()
        D, S = inp['D'], inp['S']
        if self.kind in ('BPDNJoint', 'ElasticNet'):
            return K(D, S, self.lmbda, self.mu, opt)
        if self.kind == 'BPDNProjL1':
            return K(D, S, self.gamma, opt)
        if self.kind == 'MinL1InL2Ball':
            return K(D, S, self.epsilon, opt)
        if self.kind == 'pgm.WeightedBPDN':
            return K(D, S, self.lmbda, inp.get('W'), opt)
        return K(D, S, self.lmbda, opt)

    def expect(self, it, fE, gE, aux):
        X = np.asarray(it['X'], dtype=float)
        nS = float(np.sum(self.S64**2))

        def quad(V):
            R = self.D64.dot(np.asarray(V, dtype=float))
            return 0.5 * float(np.sum(self.Wf * (R - self.S64)**2)), (nS + float(np.sum(R**2))) * max(1.0, self.Wf.max())
        l1 = lambda V: float(np.sum(self.wf * np.abs(V)))
        if self.kind == 'MinL1InL2Ball':
            V0 = it['var_y0'] if aux else X
            V1 = np.asarray(it['var_y1'] if aux else self.D64.dot(X), dtype=float)
            R = V1 - self.S64
            return {'ObjFun': (l1(V0), l1(V0)), 'Cnstr': (l2ball_dist(R, self.epsilon, 0), np.linalg.norm(V1) + np.sqrt(nS))}
        if self.pgm:
            d, sc = quad(X)
            return {'ObjFun': (d + self.lmbda * l1(X), sc + self.lmbda * l1(X)), 'DFid': (d, sc), 'RegL1': (l1(X), l1(X))}
        F, G = (X if fE else it['Y']), np.asarray(it['Y'] if gE else X, dtype=float)
        d, sc = quad(F)
        if self.kind == 'BPDNProjL1':
            return {'ObjFun': (d, sc), 'Cnstr': (l1ball_dist(G, self.gamma, (0,)), np.abs(G).sum() + self.gamma)}
        r = l1(G)
        out = {'DFid': (d, sc), 'RegL1': (r, r)}
        tot = self.lmbda * r
        if self.kind == 'BPDNJoint':
            v = float(np.sum(np.sqrt(np.sum(G**2, axis=1))))
            out['RegL21'] = (v, v)
            tot += self.mu * v
        elif self.kind == 'ElasticNet':
            v = 0.5 * float(np.sum(G**2))
            out['RegL2'] = (v, v)
            tot += self.mu * v
        out['ObjFun'] = (d + tot, sc + tot)
        return out
