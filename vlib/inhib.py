"""Generated problems and documented terms of the solver with inhibition."""
import numpy as np
from scipy import signal
from vlib.core import st
from vlib import solvers as sv
from sporco.admm import cbpdnin

CASE = st.fixed_dictionaries({'c': sv.case(['ConvBPDN'], maxN=(10, 6, 4)), 'g': st.sampled_from(['none', 'bin', 'bin', 'wgt']),
                              'mu': st.sampled_from([0.0, 0.2, 1.0]), 'gam': st.sampled_from([0.0, 0.2, 1.0]), 'win': st.integers(1, 5),
                              'sm': st.sampled_from([0.9, 0.5, 0.0]), 'wa': st.sampled_from(['tukey', 'hann', 'boxcar'])})


class Inhib(object):

    def __init__(self, case, dtype='float64'):
        self.m = m = sv.Model(case['c'], dtype)
        rs = np.random.RandomState(case['c']['seed'] % 2**31)
        M, G = m.p.M, rs.randint(1, 4)
        self.Wg = None
        if case['g'] != 'none':
            self.Wg = ((rs.rand(G, M) < 0.6) * (1.0 if case['g'] == 'bin' else 0.3 + rs.rand(G, M))).astype(dtype)
        w = min(case['win'], min(m.p.Nv))
        self.win = w - (w % 2 == 0 and w >= min(m.p.Nv))
        self.args = {'tukey': ('tukey', 0.5), 'hann': 'hann', 'boxcar': 'boxcar'}[case['wa']]
        self.mu, self.gam, self.sm = case['mu'] * m.lmbda, case['gam'] * m.lmbda, case['sm']
        self.lat = self.Wg is not None and self.mu > 0
        self.slf = self.gam > 0

    def make(self, d):
        m = self.m
        o = cbpdnin.ConvBPDNInhib.Options(dict(m.base_opts(), **dict(d, SmoothWeight=self.sm)))
        return cbpdnin.ConvBPDNInhib(m.p.D.copy(), m.p.S.copy(), None if self.Wg is None else self.Wg.copy(), self.win, self.args,
                                     m.lmbda, self.mu, self.gam, o, **m.p.kw)

    def smear(self, A, origin):
        """Circular convolution of A with the window, centred at the origin."""
        n = self.m.n
        k = self.win + (self.win % 2 == 0)
        h = signal.get_window(self.args, k)
        out = np.zeros_like(A)
        for ix in np.ndindex(*(k,) * n):
            s = tuple(i - k // 2 for i in ix)
            if origin or any(s):
                out += np.prod([h[i] for i in ix])**(1.0 / n) * np.roll(A, s, axis=tuple(range(n)))
        return out

    def weights(self, Xs):
        """Lateral and self inhibition weights after each of the iterates Xs."""
        l = s = 0.0
        out = []
        for X in Xs:
            A = np.abs(np.asarray(X, dtype=float))
            if self.lat:
                W = np.asarray(self.Wg, dtype=float)
                c = W.T @ W
                np.fill_diagonal(c, 0)
                l = self.sm * l + (1 - self.sm) * (self.smear(A, True) @ c)
            if self.slf:
                s = self.sm * s + (1 - self.sm) * self.smear(A, False)
            out.append((np.broadcast_to(l, A.shape), np.broadcast_to(s, A.shape)))
        return out
